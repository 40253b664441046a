module.exports = require('./stub.js').kit;
