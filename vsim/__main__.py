import sys
from vsim.runner import main
sys.exit(main())
