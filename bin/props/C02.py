"""C02 queries return exactly the latest committed rows: Storage (contents), Lsm (how they are kept) vs tskv write, flush and read paths."""
import lsm
def run(ctx):
    lsm.run(ctx, {"write": 60, "query": 45, "flush": 14, "compact": 5, "delete": 4, "purge": 1, "crash": 2, "logcrash": 1, "snap": 1, "restore": 1, "updtags": 2, "series": 1},
            110, 2200, 60)
