"""Transcription of the platforms and their instruments (utils.py), the oracle of C17 and C18."""
INSTRUMENTS = {
    'Envisat': ['aatsr'],
    'GOES-16': ['abi'],
    'GOES-17': ['abi'],
    'GOES-18': ['abi'],
    'GOES-19': ['abi'],
    'FY-4A': ['agri'],
    'FY-4B': ['agri', 'ghi'],
    'Himawari-8': ['ahi'],
    'Himawari-9': ['ahi'],
    'GEO-KOMPSAT-2A': ['ami'],
    'GEO-KOMPSAT-2B': ['goci-2'],
    'NOAA-10': ['avhrr/1'],
    'NOAA-6': ['avhrr/1'],
    'NOAA-8': ['avhrr/1'],
    'TIROS-N': ['avhrr/1'],
    'NOAA-11': ['avhrr/2'],
    'NOAA-12': ['avhrr/2'],
    'NOAA-14': ['avhrr/2'],
    'NOAA-7': ['avhrr/2'],
    'NOAA-9': ['avhrr/2'],
    'Metop-A': ['avhrr/3'],
    'Metop-B': ['avhrr/3'],
    'Metop-C': ['avhrr/3'],
    'NOAA-15': ['avhrr/3'],
    'NOAA-16': ['avhrr/3'],
    'NOAA-17': ['avhrr/3'],
    'NOAA-18': ['avhrr/3'],
    'NOAA-19': ['avhrr/3'],
    'HY-1C': ['cocts'],
    'Meteosat-12': ['fci'],
    'MTG-I1': ['fci'],
    'Metop-SG-A1': ['metimage'],
    'EOS-Aqua': ['modis'],
    'EOS-Terra': ['modis'],
    'Aqua': ['modis'],
    'Terra': ['modis'],
    'Sentinel-2A': ['msi'],
    'Sentinel-2B': ['msi'],
    'Sentinel-2C': ['msi'],
    'Arctica-M-N1': ['msu-gsa'],
    'Electro-L-N2': ['msu-gs'],
    'Sentinel-3A': ['olci', 'slstr'],
    'Sentinel-3B': ['olci', 'slstr'],
    'Landsat-8': ['oli_tirs'],
    'Landsat-9': ['oli_tirs'],
    'Meteosat-10': ['seviri'],
    'Meteosat-11': ['seviri'],
    'Meteosat-8': ['seviri'],
    'Meteosat-9': ['seviri'],
    'NOAA-20': ['viirs'],
    'NOAA-21': ['viirs'],
    'Suomi-NPP': ['viirs'],
    'FY-3A': ['virr', 'mersi-1'],
    'FY-3B': ['virr', 'mersi-1'],
    'FY-3C': ['virr', 'mersi-1'],
    'FY-3D': ['mersi-2'],
    'FY-3F': ['mersi-3'],
    'FY-3G': ['mersi-rm'],
    'DSCOVR': ['epic'],
}
DASH2SLASH = {"avhrr-1": "avhrr/1", "avhrr-2": "avhrr/2", "avhrr-3": "avhrr/3"}
