"""C03 a crash loses nothing that was committed: Storage (Restart), Lsm (CrashSafe, Replayable) vs tskv WAL replay and recovery."""
import lsm
def run(ctx):
    lsm.run(ctx, {"write": 45, "query": 4, "flush": 12, "purge": 9, "crash": 22, "logcrash": 14, "delete": 7, "compact": 4, "snap": 1, "restore": 1, "updtags": 2, "dropcol": 1, "droptable": 1, "series": 2},
            110, 2200, 90, keep=lambda o: "crash" in o)
