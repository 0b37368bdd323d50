"""C04 flush, compaction, log purging and vnode snapshots are invisible: Storage (Maintain, Save, Restore), Lsm (Faithful) vs tskv."""
import lsm
def run(ctx):
    lsm.run(ctx, {"write": 55, "query": 6, "flush": 30, "compact": 26, "purge": 5, "snap": 7, "restore": 7, "delete": 8, "crash": 3, "logcrash": 1, "updtags": 1},
            110, 2200, 90, keep=lambda o: o & {"compact", "restore", "purge", "snap"})
