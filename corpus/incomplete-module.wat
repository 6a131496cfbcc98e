(module
