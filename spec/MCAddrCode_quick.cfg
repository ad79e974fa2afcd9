SPECIFICATION Spec
CONSTANT WIDTH = 42
VIEW Syndrome
POSTCONDITION AllDistinct
