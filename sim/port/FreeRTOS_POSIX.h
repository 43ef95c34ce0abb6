// stand-in
