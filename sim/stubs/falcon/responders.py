def _nop(*pa, **kwa):
    pass


bad_request = path_not_found = create_method_not_allowed = create_default_options = _nop
