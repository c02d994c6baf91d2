from .sema import C12

CHECK = C12()
