SPECIFICATION SpecSim

CONSTANTS
  Objs = 3
  Depth = 14
  Sizes = {0,1,2,3,8,31,32,33,54,55,56,57,62,63,64,65,66,71,72,73,100,120,127,128,129,191,192,193,300}
