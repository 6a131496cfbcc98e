(module
  (global ())
  (global i32 ())
  (global (mut i32) ())
  (global)
  (global (mut))
)
