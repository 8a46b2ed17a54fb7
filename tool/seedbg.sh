# seedbg.sh LOG FILE ids...   in a private view where /repo is /tmp/wr
L=$1; shift
rm -rf /tmp/wr; cp -a /repo /tmp/wr
rm -rf /tmp/wv; mkdir /tmp/wv
unshare -m bash -c 'mount --make-rprivate / ; mount --bind /tmp/wr /repo && cd /verif && python3 /tmp/mkseed.py "$@"' x "$@" > $L 2>&1
echo FINISHED >> $L
