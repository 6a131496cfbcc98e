(module
  (data (memory) "")
)
