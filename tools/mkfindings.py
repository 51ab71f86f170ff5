NAN="ValueError: Probabilities contain NaN"; SC="ValueError: scale < #"; IX="IndexError: list index out of range"; LG="ValueError: Cannot take a larger sample than population when r"
EMP="ValueError: a cannot be empty unless no samples are taken"
K=[("ICA.OriginalICA",[IX,LG],"ICA.OriginalICA raises IndexError in a search in which an empire loses its last colony (its imperialist leaves pop_empires but the empire stays in the dictionary), or rounds to more colonies than there are"),
("DMOA.OriginalDMOA",[NAN],"DMOA.OriginalDMOA raises 'Probabilities contain NaN' when the fitness values make exp(-fit/mean) overflow"),
("DMOA.DevDMOA",[NAN],"DMOA.DevDMOA raises 'Probabilities contain NaN' when the fitness values make exp(-fit/mean) overflow"),
("FOA.OriginalFOA",[SC],"FOA.OriginalFOA raises 'scale < 0' for a variable with a negative upper bound (generator.normal(lb, ub))"),
("FOA.DevFOA",[SC],"FOA.DevFOA raises 'scale < 0' for a variable with a negative upper bound (generator.normal(lb, ub))"),
("HS.DevHS",[SC],"HS.DevHS raises 'scale < 0' for a variable with a negative upper bound (generator.normal(lb, ub))"),
("GSKA.OriginalGSKA",[EMP],"GSKA.OriginalGSKA raises 'a cannot be empty' when int(pb * pop_size) leaves no best agent (e.g. pop_size=16)"),
("GSKA.DevGSKA",[EMP],"GSKA.DevGSKA raises 'a cannot be empty' when int(pb * pop_size) leaves a group empty (e.g. pop_size=16)"),
("NRO.OriginalNRO",["ValueError: setting an array element with a sequence."],"NRO.OriginalNRO raises 'setting an array element with a sequence' when a coordinate of two agents coincides (levy step has shape (1,))"),
("BFO.ABFO",[IX],"BFO.ABFO raises IndexError when duplicates are dropped from the population (the balancing loop range(0, n_agents) with n_agents < 0 adds nothing)"),
("GA.EliteSingleGA",[IX],"GA.EliteSingleGA raises IndexError with tournament selection and a small pop_size"),
("GA.EliteMultiGA",[IX],"GA.EliteMultiGA raises IndexError with tournament selection and a small pop_size"),
("WCA.OriginalWCA",[IX,LG],"WCA.OriginalWCA raises an error when the rounded stream counts exceed the streams, or a river has no stream left"),
("CHIO.DevCHIO",["ValueError: attempt to get argmin of an empty sequence"],"CHIO.DevCHIO raises 'attempt to get argmin of an empty sequence' when no agent is immune or susceptible")]
print("# Findings recorded, not repaired:  finding: property=<id> key=[<what the check reports>] <what fails>")
print("finding: property=C11 key=[PO.OriginalPO.pop_size] PO.OriginalPO stores pop_size**2 under the name pop_size (pop_size=8 reads back as 64)")
for k,es,t in K:
    for e in es: print(f"finding: property=C05 key=[{k} {e[:60]}] {t}")
print("finding: property=C05 key=[GA.MultiGA endless] the GA variants with roulette selection do not end when the roulette can only return one parent (all agents but one equal and worst)")
print("# Repaired:  fixed: property=<id> <commit> <what failed>")
import subprocess
M={}
P={"989f792":"C22","79cf548":"C20","1425b58":"C20","6123427":"C19","2233b83":"C11","e34ae7d":"C10","0a91745":"C14","d792ca6":"C21","5489bf8":"C16","47119a3":"C18","15f175b":"C09","b6a491c":"C21","7fd072b":"C02","b17d938":"C01","c2b738a":"C01","58efb0b":"C05","7feb4cf":"C02","36d826c":"C02","6634b3b":"C02","5e231a6":"C01","e6a90c8":"C02","b4ca1fd":"C02","b42cd3c":"C02","65ceb3f":"C01","f0649e1":"C07","1159b0d":"C07","e600e8d":"C09","79e8c42":"C09","0456d82":"C09","d00f5a9":"C10","3f774f8":"C10","c7cdd93":"C18","784839c":"C17","27471f1":"C17","e22197d":"C08","4f48392":"C05","e6311f4":"C05","c661c09":"C05","768389a":"C05","fa3d433":"C04","3c64a60":"C11","621f213":"C11","ab3b9d3":"C11","fadae3c":"C11","a0ebf4b":"C02","2cefcff":"C05","7d1617d":"C05"}
for l in subprocess.check_output(["git","-C","/repo","log","--reverse","--oneline"],text=True).splitlines():
    h,m=l.split(" ",1)
    if not m.startswith("fix: "): continue
    m=m[5:]
    p=P.get(h)
    if not p:
        p="C01" if "NaN" in m or "inside the bounds" in m else "C20" if "starting solutions" in m or "starting" in m and "search" not in m else "C06" if "counting" in m else "C07"
    print(f"fixed: property={p} {h} {m}")
