import enum
from . import link, logging  # noqa: F401


class Visibility(enum.Enum):
    VIS_INVALID = 0
    VIS_SECRET = 1
    VIS_PUBLIC = 2
    VIS_PRIVATE = 3


class ProtocolKind(enum.Enum):
    REF2K = 1
    SEMI2K = 2
    ABY3 = 3
    CHEETAH = 4
    SECURENN = 5


class FieldType(enum.Enum):
    FM32 = 1
    FM64 = 2
    FM128 = 3


class DataType(enum.Enum):
    DT_I1 = 1
    DT_I8 = 2
    DT_U8 = 3
    DT_I16 = 4
    DT_U16 = 5
    DT_I32 = 6
    DT_U32 = 7
    DT_I64 = 8
    DT_U64 = 9
    DT_F16 = 10
    DT_F32 = 11
    DT_F64 = 12


class SourceIRType(enum.Enum):
    STABLEHLO = 1


class Share:
    def __init__(self):
        self.meta = b""
        self.share_chunks = []


class RuntimeConfig:
    def __init__(self):
        self.protocol = None
        self.field = None
        self.fxp_fraction_bits = 0


class CompilerOptions:
    pass


class CompilationSource:
    def __init__(self, ir_type, code, vis):
        self.ir_type, self.code, self.vis = ir_type, code, vis


class Executable:
    def __init__(self, name="", input_names=(), output_names=(), code=b""):
        self.name = name
        self.input_names = list(input_names)
        self.output_names = list(output_names)
        self.code = code
