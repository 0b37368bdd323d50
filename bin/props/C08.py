"""C08 series, tags and schema follow the rows: Storage (Retag, DropCol, DropTable, series listing) vs tskv index, schema and recovery."""
import lsm
def run(ctx):
    lsm.run(ctx, {"write": 50, "query": 10, "flush": 14, "delete": 3, "compact": 4, "purge": 3, "crash": 8, "logcrash": 2, "snap": 1, "restore": 1, "updtags": 22, "dropcol": 7, "droptable": 5, "series": 22},
            130, 2600, 0)
