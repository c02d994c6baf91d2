from .sema import C08

CHECK = C08()
