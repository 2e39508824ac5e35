SPECIFICATION Spec
INVARIANT Emit
CONSTANTS NOps = 24
          NThreads = 8
