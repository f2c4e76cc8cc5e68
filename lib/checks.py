"""One function per property."""
from check_api import api_check
from check_cli import cli_check
from check_decode import decode_check
from check_generics import generics_check
from check_readers import readers_check
from check_text import text_check
from check_pure import pure_check

CHECKS = {p: decode_check for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09")}
CHECKS["C07"] = api_check
CHECKS["C10"] = readers_check
CHECKS["C12"] = CHECKS["C14"] = text_check
CHECKS["C11"] = pure_check
CHECKS["C13"] = generics_check
CHECKS["C15"] = cli_check
