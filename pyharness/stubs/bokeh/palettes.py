Category10 = {n: ["#%02x%02x%02x" % (20 * i, 255 - 20 * i, 10 * i) for i in range(n)] for n in range(3, 11)}
Set1 = {n: ["#%02x%02x%02x" % (25 * i, 10 * i, 255 - 20 * i) for i in range(n)] for n in range(3, 10)}
Accent = {n: ["#%02x%02x%02x" % (255 - 25 * i, 20 * i, 90) for i in range(n)] for n in range(3, 9)}
