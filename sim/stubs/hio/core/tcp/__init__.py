from . import clienting, serving
from .clienting import Client, ClientDoer
from .serving import Server, ServerTls, ServerDoer
