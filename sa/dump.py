import sys, time
from .run import *
def argmap():
    d = {'_dt': sym('dt'), 'dt': sym('dt'), 'H_bc': garr('H_bc','j'), '_Q_0j': garr('Q_0j_in','j'), '_Q_0Ik': garr('Q_0Ik_in','Ik')}
    return d
if __name__=='__main__':
    repo = Repo(sys.argv[3] if len(sys.argv)>3 else '/repo')
    cls = sys.argv[1]
    for m in sys.argv[2].split(','):
        t=time.time()
        e = run_method(repo, cls, m, argmap())
        print('==',m, '%.2fs'%(time.time()-t), 'unmod', e.eng.unmodelled[:6], 'find', e.eng.findings[:4])
        for a in e.changed():
            v = e.get(a)
            s = repr(v)
            print('  ',a, s[:700])
        print('  ret', repr(e.value(e.ret))[:300])
