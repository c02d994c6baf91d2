from .sema import C06

CHECK = C06()
