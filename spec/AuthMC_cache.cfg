SPECIFICATION MCSpec
CONSTANT What = "cache"
VIEW View
INVARIANT CacheOk RoleOk
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
