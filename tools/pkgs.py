# generated by gen.py
PKG = {
 "P01": "h-base",
 "P02": "h-base",
 "P03": "h-base",
 "P04": "h-base",
 "P05": "h-base",
 "P06": "h-base",
 "P07": "h-base",
 "P08": "h-base",
 "P09": "h-base",
 "P10": "h-base",
 "P11": "h-base",
 "P12": "h-base",
 "P13": "h-base",
 "P14": "h-base",
 "P15": "h-tools",
 "P16": "h-tools",
 "P17": "h-tools",
 "P18": "h-base",
 "P19": "h-base",
 "P20": "h-base",
 "P22": "h-base",
 "P23": "h-core:store",
 "P24": "h-core:store",
 "P30": "h-core:exec",
 "P31": "h-core:exec",
 "P32": "h-core:exec",
 "P33": "h-core:exec",
 "P34": "h-core:exec",
 "P35": "h-core:exec",
 "P25": "h-core:pool",
 "P26": "h-core:pool",
 "P27": "h-core:wal",
 "P28": "h-core:wal",
 "P29": "h-core:chain",
 "P40": "h-core:chain",
 "P41": "h-core:chain",
 "P39": "h-core:api",
 "P42": "h-core:api",
 "P43": "h-core:api",
 "P44": "h-core:api",
 "P45": "h-node",
 "P46": "h-node",
 "P36": "h-net",
 "P37": "h-net",
 "P38": "h-net"
}
