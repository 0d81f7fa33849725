from r_txn import *
from r_cap import *
from r_event import *
from r_ent import *
from r_bulk import *
from r_api import *
from r_deliver import *
from r_locks import *
from r_query import *
from r_fields import *
from r_store import *
from r_runs import *
from r_index import *
from r_units import *
from r_errors import *
from r_longop import *
from r_flow import *
from r_hl import *
import re
RULES = {k: v for k, v in globals().items() if re.match(r"^[A-Z]\d{2,3}$", k)}
