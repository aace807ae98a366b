"""Stand-in with the API of the old parameterizable releases that Pythagoras 0.17.2 uses."""

CLASSNAME_PARAM_KEY = "__class_name__"
_registered = {}


def register_parameterizable_class(cls):
    assert isinstance(cls, type)
    _registered[cls.__name__] = cls


def is_registered(cls):
    return _registered.get(cls.__name__) is cls


def is_parameterizable(cls):
    return isinstance(cls, type) and hasattr(cls, "get_params")


def _to_portable(value):
    if isinstance(value, type):
        return {CLASSNAME_PARAM_KEY: "__type__", "name": value.__name__}
    if hasattr(value, "__get_portable_params__"):
        return value.__get_portable_params__()
    return value


def _all_subclasses(cls):
    for s in cls.__subclasses__():
        yield s
        yield from _all_subclasses(s)


class ParameterizableClass:
    def __init__(self):
        pass

    def get_params(self):
        raise NotImplementedError

    def __get_portable_params__(self):
        params = {k: _to_portable(v) for k, v in self.get_params().items()}
        params[CLASSNAME_PARAM_KEY] = type(self).__name__
        return {k: params[k] for k in sorted(params)}


def get_object_from_portable_params(portable_params):
    assert isinstance(portable_params, dict)
    params = dict(portable_params)
    name = params.pop(CLASSNAME_PARAM_KEY)
    if name == "__type__":
        return {"str": str, "int": int, "object": object}[params["name"]]
    cls = _registered.get(name)
    if cls is None:
        for c in _all_subclasses(ParameterizableClass):
            if c.__name__ == name:
                cls = c
                break
    assert cls is not None, f"unknown parameterizable class {name}"
    for k, v in params.items():
        if isinstance(v, dict) and CLASSNAME_PARAM_KEY in v:
            params[k] = get_object_from_portable_params(v)
    return cls(**params)
