def load_operations_from_docstring(doc):
    return {}


def load_yaml_from_docstring(doc):
    return {}
