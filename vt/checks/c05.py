from .sema import C05

CHECK = C05()
