from .sema import C09

CHECK = C09()
