# dev/m.sh PID FILE OLD NEW : compact mutation run
python3 /verif/dev/mut.py "$1" "$2" "$3" "$4" | grep -v KNOWN| cut -c1-350
HSA_REPO=/tmp/hsa-mut python3 /verif/check.py $1 2>&1| grep "undec\|$1/\|BROKEN" | cut -c1-350
