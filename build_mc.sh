# sourced: builds the checker against /repo's working tree, sets MC
. /verif/env.sh
mkdir -p /verif/target
MC=/verif/target/outer/release/mc
(cd /verif/harness && flock /verif/target/.lock cargo build --release --offline) > /verif/target/build.log 2>&1 || { tail -40 /verif/target/build.log; echo "ERROR: the checker does not build against /repo"; return 2; }
