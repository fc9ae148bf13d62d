_S="Every obligation of the listed functions (safety, agreement of results, errors and final state with the specification program for all inputs, frame) is discharged on the current source; "
CLAIMED={
"P01":_S+"bufio.Scanner is an assumed contract: the lines of its reader in order, then an error or the end; TrimSpace is an uninterpreted function.",
"P02":"Every safety obligation (no nil dereference, index out of range, failing type assertion or endless recursion) of the three parsers and every postcondition they rely on is discharged on the current source for every state and pair; out-of-memory is outside the model.",
"P03":_S+"strconv.Atoi, strings.TrimSpace and strings.Fields are uninterpreted functions of their text; a state reached after a failed step is not specified.",
"P06":_S+"strings are SMT strings; string order is byte order.",
"P07":_S+"encoding/json on strings is an assumed contract (decoding inverts encoding for valid UTF-8 text; the surrounding encoder only adds HTML escapes); names that repeat their own prefix and text that is not valid UTF-8 are not well formed.",
"P04":_S+"fmt.Fprintf is an assumed contract (%s of strings, %d of integers); the destination is one that keeps what it is given (a buffer, or the bufio.Writer of tagvalue.Write); list elements are non-nil; ties of sort.Slice are resolved by a fixed function of the input.",
"P22":"For every writing function of the three versions the final state equals, component by component and for all inputs, the initial state with the named lists put in order, and the output does not depend on map order; repeating a write after the lists are in order relies on sort.Slice leaving an ordered list as it is.",
"P20":_S+"the class of safety obligations is left to P19; gordf's FilterTriples, Node.String and ToLicenseString are assumed contracts, the references inside the triples the loader makes are non-nil, the recursive walk over files, packages and relationships is an unspecified function of what it reads (P24), and only the list of license identifiers is uninterpreted.",
"P12":_S+"SHA1 is an uninterpreted function of the bytes hashed and string order is byte order.",
"P13":_S+"path.Split, HasPrefix and Contains have exact string semantics.",
"P14":_S+"filepath.Walk is assumed to present a fixed sequence of entries in order; hashes and time are uninterpreted.",
"P15":_S+"file lines come from an assumed bufio.Scanner contract; regular expressions are uninterpreted functions of pattern and text.",
"P16":_S+"mathematical integers and the trusted base listed in the evidence.",
"P17":_S+"the text of the report is proved up to the tabwriter layout, which is an assumed contract on the dependency.",
"P08":_S+"encoding/json decoding of an object into a struct is an assumed contract, property by property (exact property names; null leaves a plain member alone and clears a pointer), the decoders of the elements are uninterpreted functions of the text, and appending to a prefix of a list is assumed not to clobber another list sharing its array (capacity is not modelled). The rendering of identifiers is the contract proved under P06.",
"P09":_S+"encoding/json decoding of an object into a struct is an assumed contract, property by property (exact property names; null leaves a plain member alone and clears a pointer), and the encoding of a value is an uninterpreted function of its content.",
"P10":_S+"the readers and writers agree with specification programs that name the model, the stages and their order; encoding/json and sigs.k8s.io/yaml on values that are not strings are uninterpreted functions of the text (or value) and the model type, the RDF graph loader and the per-version RDF graph readers are trusted (uninterpreted results), reflection follows an assumed model of reflect.",
"P11":_S+"go-struct-converter is an assumed contract (its result is an uninterpreted function of the registered conversion functions, the source and the target type); that no field is lost between adjacent models is decided field by field over the type declarations of the current source.",
"P21":_S+"a destination is any writer that may fail at any point; bufio.Writer, tabwriter.Writer and json.Encoder are assumed contracts (errors are sticky and reported by Flush, Encode returns the destination's error).",
"P23":"Every obligation generated from the type declarations of the current source (one per field, property and codec of every element reachable from the document, in the three versions) is decided by evaluation; encoding/json itself is trusted to honour the tags. These are ground data-structure obligations: no solver is needed.",
"P18":_S+"callbacks passed to FilterRelationships are pure functions of the relationship.",
}
NOT_APPLICABLE={
"P05":"no check claimed: the property relates the writer's text to the tokenizer and parser; its lemmas over both contracts (string concatenation, line splitting and text markers of unbounded text) are beyond the installed solvers so far. The two halves are specified exactly (P01, P03, P04, P06).",
"P19":"no check claimed: several handlers index or assert on what a malformed graph does not provide (for example the type triples of the document node, or the object of a node that is being visited), and the invariant that excludes this needs the whole recursive walk under contract (P24).",
"P24":"no check claimed: the contracts of the mutually recursive walk (document, package, file, snippet, relationship) are written down but the symbolic state of one handler's loop (about 90 heap components, each changed by every recursive call) exceeds the memory of the sandbox before its obligations are discharged. The handlers of the leaf elements they call are P20; callers of the walk see it as an unspecified function of what it reads.",
}
