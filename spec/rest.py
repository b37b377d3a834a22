from common import H, deep
PROPS = []
