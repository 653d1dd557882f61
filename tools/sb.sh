#!/bin/bash
# sb.sh CMD...: runs CMD in a private mount namespace where /repo, /opt/vp and the build and result folders of /verif are
# copies, so that planted changes can be tried while something else uses the real ones.
B=${SB:-/tmp/sb}
if [ ! -d $B/repo ]; then
  mkdir -p $B && cp -a /repo $B/repo && cp -a /opt/vp $B/vp && cp -a /verif/mc/target $B/target && mkdir -p $B/evidence $B/replays
fi
exec unshare -m bash -c 'mount --make-rprivate / && B=$0 && mount --bind $B/repo /repo && mount --bind $B/vp /opt/vp &&
  mount --bind $B/target /verif/mc/target && mount --bind $B/evidence /verif/evidence && mkdir -p /verif/replays &&
  mount --bind $B/replays /verif/replays && exec "$@"' $B "$@"
