def patch_yacc():
    """Keep ply from reading or writing table files in the repository."""
    import ply.yacc
    if getattr(ply.yacc, '_verif_patched', False): return
    orig = ply.yacc.yacc
    def yacc(*a, **k):
        k['write_tables'] = False
        k['debug'] = False
        k['tabmodule'] = '_verif_no_such_parsetab'
        k['outputdir'] = '/nonexistent'
        k.setdefault('errorlog', ply.yacc.NullLogger())
        return orig(*a, **k)
    ply.yacc.yacc = yacc
    ply.yacc._verif_patched = True
