(module
  (start)
  (start )
  (start $)
)
