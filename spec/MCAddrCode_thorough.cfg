SPECIFICATION Spec
CONSTANT WIDTH = 56
VIEW Syndrome
POSTCONDITION AllDistinct
