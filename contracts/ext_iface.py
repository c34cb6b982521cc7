"""Signatures of external objects (assumed interfaces, no code of DHParser); the contracts are marked trusted"""
class StreamReader:
    async def read(self, n=-1): ...
    def at_eof(self): ...
