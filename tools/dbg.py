import sys,importlib,threading,traceback
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000); threading.stack_size(512<<20)
def main():
    from engine import spec, extract
    import check
    mod=importlib.import_module("specs."+sys.argv[1])
    prog=extract.Program(mod.TUS)
    for s in sys.argv[2:]:
        v=spec.V(sys.argv[1],prog); v.section=s
        try: getattr(mod,s)(v)
        except Exception: traceback.print_exc()
        for o in v.obls:
            spec.discharge(o,30); print(o.name,o.status,o.how,o.info[:300] if o.status!='proved' else '')
            if o.status!='proved':
                print('   goal',spec.show(o.goal)[:1500])
                for h in o.hyps: print('   hyp',spec.show(h)[:400])
                print('   model',o.model)
        print(v.notes)
t=threading.Thread(target=main); t.start(); t.join()
