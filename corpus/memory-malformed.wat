(module
  (memory)
  (memory "")
  (memory ())
)
