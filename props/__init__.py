MODULES = {
    "C01": ["quat", "rounding"], "C02": ["quat"], "C03": ["quat", "rounding"], "C04": ["rfun", "rounding"], "C05": ["rfun", "rounding"], "C06": ["rfun"], "C07": ["rfun"],
    "C08": ["model"], "C09": ["model"], "C10": ["domain", "rounding"], "C11": ["domain"], "C12": ["domain"], "C13": ["integ"], "C14": ["integ"], "C15": ["calc"], "C16": ["calc"], "C17": ["ode"], "C18": ["tr"], "C19": ["tr"], "C20": ["tr"], "C21": ["spline"], "C22": ["model"], "C23": ["surf"], "C24": ["surf"], "C25": ["data"], "C26": ["data"],
}
LEVEL = {}
