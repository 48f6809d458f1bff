import enum


class LogLevel(enum.Enum):
    TRACE = 0
    DEBUG = 1
    INFO = 2
    WARN = 3
    ERROR = 4


class LogOptions:
    log_level = LogLevel.INFO


def setup_logging(opts):
    pass
