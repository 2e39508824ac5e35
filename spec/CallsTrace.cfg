SPECIFICATION Spec
INVARIANT Good
VIEW View
