from .parent import main

main()
