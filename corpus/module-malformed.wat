(module
  (func)
  (f)
  (func)
)
