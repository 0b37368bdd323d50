"""C05 a delete removes exactly the rows it matches, for good: Storage (Delete), Lsm (tombstones) vs tskv delete path."""
import lsm
def run(ctx):
    lsm.run(ctx, {"write": 50, "query": 5, "flush": 16, "delete": 34, "compact": 9, "purge": 3, "crash": 7, "logcrash": 5, "snap": 2, "restore": 2, "updtags": 0, "dropcol": 0, "droptable": 0},
            110, 2200, 90, keep=lambda o: "del" in o)
