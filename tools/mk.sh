mk () 
{ 
    mkdir -p seeded/$1;
    git -C /repo diff > seeded/$1/patch.diff;
    git -C /repo checkout -q -- .;
    /opt/venv/bin/python - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P

}
