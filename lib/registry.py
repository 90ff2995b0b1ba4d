def register(reg):
    reg('sessions', 'S01', 'S02', 'S03', 'S04', 'S05', 'S06', 'S07', 'M01', 'M02')
    reg('structure', 'R01', 'R02')
    reg('vocab', 'W04')
    reg('base64check', 'D03')
    reg('pixels', 'D04', 'M05')
    reg('wirecheck', 'W01', 'W02', 'W03', 'W05', 'W06', 'W07')
    reg('clientcheck', 'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')
    reg('wrappers', 'B03', 'B04', 'B05', 'B06')
    reg('pybind', 'B01')
    reg('bindnames', 'B02')
    reg('buffers', 'M03')
    reg('mapcheck', 'D01', 'M01', 'M02')
    reg('propcheck', 'D02')
    reg('regioncheck', 'D05', 'D06')
    reg('formats', 'S07', 'M02')
    reg('objects', 'M01', 'M02')
    reg('decodecheck', 'M04')
    reg('carry', 'S08')
