from feax.distributed import main

main()
