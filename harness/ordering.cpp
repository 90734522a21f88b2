// part of the TRW-S stand-in, see MRFEnergy.h
