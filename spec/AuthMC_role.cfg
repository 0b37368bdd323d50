SPECIFICATION MCSpec
CONSTANT What = "role"
VIEW View
INVARIANT CacheOk RoleOk
ACTION_CONSTRAINT EdgeOut
CHECK_DEADLOCK FALSE
