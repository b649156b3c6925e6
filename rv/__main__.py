from rv.common import main
main()
