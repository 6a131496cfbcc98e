(module (start 1))
(module (start $main))
