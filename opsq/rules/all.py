from . import storage, reads, conn, dbopen, schema, strat, dispatch, metastate, consumer, trace, native, pyapi, pyconv, results, http, objstore, lifecycle, config, metrics, ffi, ids
