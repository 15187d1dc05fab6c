"""Stands in for squaternion."""
import math
class Quaternion:
    def __init__(self, w=1.0, x=0.0, y=0.0, z=0.0):
        self.w, self.x, self.y, self.z = w, x, y, z

    def to_euler(self, degrees=False):
        w, x, y, z = self.w, self.x, self.y, self.z
        a = (math.atan2(2 * (w * x + y * z), 1 - 2 * (x * x + y * y)), math.asin(max(-1, min(1, 2 * (w * y - z * x)))), math.atan2(2 * (w * z + x * y), 1 - 2 * (y * y + z * z)))
        return tuple(math.degrees(v) for v in a) if degrees else a
