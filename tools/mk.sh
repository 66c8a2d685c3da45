mk () 
{ 
    mkdir -p /verif/seeded/$1;
    git -C /repo diff > /verif/seeded/$1/patch.diff;
    git -C /repo checkout -- .;
    python3 - "$@" <<'P'
import sys,json
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P

}
