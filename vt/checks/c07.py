from .sema import C07

CHECK = C07()
