(module (func br 0drop))
