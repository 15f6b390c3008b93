def run(prop):
    import simple, importers, texts, capi, memory, bounds, pure, term, values, copies, compare, exporters, roundtrip, luastack, keyed, cface
    for m in (simple, importers, texts, capi, memory, bounds, pure, term, values, copies, compare, exporters, roundtrip, luastack, keyed, cface):
        f = getattr(m, 'check_' + prop, None)
        if f is not None:
            return f()
    raise Exception('no check for ' + prop)
