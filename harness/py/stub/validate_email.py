"""A stand-in for validate_email, which is not installed: the plain form of an
address. The checks compare plain addresses only."""
import re


def validate_email(email, check_mx=False, verify=False, debug=False, smtp_timeout=10):
    return re.match(r"^[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]+(\.[A-Za-z0-9!#$%&'*+/=?^_`{|}~-]+)*@[^@\s]+$", email) is not None
