// stand-in: no flags
