p=$1; cd /verif
cat > /tmp/cov/r_$p.py <<P
import sys, os, runpy
import coverage
c = coverage.Coverage(data_file='/tmp/cov/$p.cov', source=['/repo/tensap']); c.start()
def ex(rc):
    c.stop(); c.save(); sys.stdout.flush(); sys.exit(rc)
os._exit = ex
sys.argv = ['/verif/checks/run.py', '$p']
runpy.run_path('/verif/checks/run.py', run_name='__main__')
P
HOME=/root PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONPATH=/repo VP_CHILD=1 VERIF_SEED=1 VERIF_TIER=quick VERIF_WORKERS=2 VERIF_OUT=/tmp/covout/$p /opt/venv/bin/python -B /tmp/cov/r_$p.py > /tmp/cov/$p.log 2>&1
echo $p $? $(tail -1 /tmp/cov/$p.log | head -c 100)
