import sys
sys.path.insert(0,'/verif')
from sim import minikd
minikd.install()
