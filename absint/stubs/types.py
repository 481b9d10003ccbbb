from __native__ import module as ModuleType, function as FunctionType, method as MethodType
from __native__ import generator as GeneratorType, builtin_function_or_method as BuiltinFunctionType
LambdaType = FunctionType


class SimpleNamespace(object):

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
